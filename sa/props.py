"""The properties: text (properties.jsonl is generated from here by tools/mkmeta.py),
the rules that decide each, and what a run covers."""

PROPS = {}
NOT_APPLICABLE = {}


def prop(pid, **kw):
    PROPS[pid] = kw


def na(pid, **kw):
    NOT_APPLICABLE[pid] = kw


prop('C01',
     title='Trial and list data stay attached to their model, segment and key labels',
     statement='After any sequence of sorting, filtering, splitting, merging, aligning or loading of trial lists, trial '
               'keys, score sets and file lists, every value (trial mask, target/non-target flag, condition mask, score, '
               'file path, offset, range) still belongs to the model, segment or key it was given with. Filtering with '
               'keep=True returns exactly the asked entries and keep=False exactly the others, and splitting returns the '
               'asked part along the asked axis.',
     over=['inputs', 'histories'],
     quant='all label sets, orderings, overlaps between merged objects, optional fields present or absent, all operation sequences',
     why='The tests compare a handful of sorted label lists where a wrong permutation is often the identity, and never use '
         'the optional condition masks; a mis-ordered axis gives a plausible but wrong score for some other trial.',
     files=['hyperion/utils/trial_ndx.py', 'hyperion/utils/trial_key.py', 'hyperion/utils/trial_scores.py',
            'hyperion/utils/scp_list.py', 'hyperion/utils/list_utils.py'],
     mech=[('container operations', 'hyperion/utils/trial_key.py, trial_ndx.py, trial_scores.py, scp_list.py: sort, filter, split, merge, load*, align_with_ndx'),
           ('index helpers', 'hyperion/utils/list_utils.py: ismember, intersect, sort, split_list')],
     observe=['fields of the returned objects'],
     technique='static named-axis (dimension-label) inference by abstract interpretation of the syntax tree',
     level_note='Each container method is interpreted symbolically once (all branches joined, loops by invariants); every '
                'indexing, store and constructed field gets axis labels and a positive conflict between two fully known labels is reported.',
     rules=['align'],
     explanation='Abstract interpretation of every operation of the labelled containers: axis labels (which list orders this '
                 'axis, through which selection) are inferred for every array expression; obligations are one per produced field axis, '
                 'index application, store and list operation.')
prop('C02',
     title='Operations never write into the arrays and objects they are given',
     statement='Computing features, scores, statistics, metrics, transforms or list operations leaves every array, statistics '
               'tuple and container passed in unchanged, whatever optional arguments (masks, weights, scaling factors, precomputed '
               'statistics) are given. Evaluating, scoring or sampling with a fitted model leaves its parameters unchanged, so '
               'calling it twice gives the same answer. Constructors, which adopt what they are given, are outside this guarantee.',
     over=['inputs', 'histories'],
     quant='all public functions and methods of the numerical packages, all optional-argument combinations, all call sequences that reuse an array',
     why='Tests pass fresh arrays and look only at the return value; a silent write into a cohort matrix, statistics or labels '
         'corrupts the next call only, and only when a mask, weight or view is involved.',
     files=['hyperion/score_norm', 'hyperion/pdfs', 'hyperion/transforms', 'hyperion/metrics', 'hyperion/feats',
            'hyperion/classifiers', 'hyperion/utils', 'hyperion/io', 'hyperion/helpers', 'hyperion/generators'],
     mech=[('in-place updates', 'every augmented assignment, element store, out= and mutating method call in the numerical packages'),
           ('cohort masking', 'hyperion/score_norm/*.py: predict'),
           ('weighted statistics', 'hyperion/pdfs/core/exp_family.py, hyperion/pdfs/plda/plda_base.py')],
     observe=['the arguments after the call', 'model fields after inference'],
     technique='static alias and effect analysis (abstract interpretation with view tracking)',
     level_note='Every write reachable from a public function is traced through views, slices, branches, loops and inlined callees to the '
                'memory it may share; a write that reaches an argument is reported, unknown index kinds are listed as undecided.',
     rules=['effects'],
     explanation='Alias/effect analysis: each write (element store, augmented assignment, mutating call, out=, attribute assignment) found by '
                 'abstract interpretation of every public function, callees inlined, is traced to the memory it can share; one obligation per write.')
prop('C03',
     title='A saved model loads back as the same model',
     statement='Saving a model (transform, back-end, classifier, mixture, calibration, normalization) and loading it gives a model with the '
               'same parameters and configuration: every array and option written by save is put back into the field it came from, '
               'optional parameters that are None come back as None, and every value that prediction or scoring uses is restored. The same '
               'holds for the save_mat/load_mat pairs and for lists of transforms, whose members come back in order with their own parameters.',
     over=['inputs', 'histories'],
     quant='every model class with a save/load pair, all parameter values including None, with and without a name, nested in a transform list',
     why='The tests save one fully trained, fully populated object per class and compare a few fields; a field dropped, swapped or defaulted at '
         'load gives a model that works but scores differently.',
     files=['hyperion/hyp_model.py', 'hyperion/transforms', 'hyperion/pdfs', 'hyperion/classifiers', 'hyperion/calibration'],
     mech=[('parameter files', 'hyperion/hyp_model.py: save, load, _save_params_from_dict, _load_params_to_dict'),
           ('per-class pairs', 'save_params/load_params/get_config and save_mat/load_mat of every HypModel subclass'),
           ('composite', 'hyperion/transforms/transform_list.py')],
     observe=['fields of the loaded object'],
     technique='static save/load symmetry analysis (abstract interpretation of save composed with load)',
     level_note='save_params, get_config and load_params of each class are interpreted symbolically and composed; each field of the loaded object must '
                'reduce to the field it was saved from. Values derived from several saved ones are accepted when they depend only on saved data.',
     rules=['persist'],
     explanation='Symbolic composition of save with load for every model class: one obligation per saved dataset, configuration key and field used by inference.')
prop('C07',
     title='Randomness comes only from the given seed or generator',
     statement='Every random draw of the package (sampling from a pdf, splitting mixtures, shuffling and cutting of training lists and batches, '
               'fold creation, dither, solver initialisation) comes from a generator the caller hands over or from one built from an explicit seed: '
               'when an rng is given it is the one used, when only a seed is given the result depends on nothing else. No result depends on the '
               'process-wide generators of numpy and random, on the clock, on the environment, on the order of sets or directory listings, or on '
               'memory that was never filled. A data generator restarted at an epoch draws what it would have drawn by running up to it.',
     over=['inputs', 'histories'],
     quant='all functions of the data, feature, scoring, metric and modelling packages, all seeds, all call histories that touch the global generator',
     why='A test that seeds numpy, or runs once, cannot tell a local generator from the global one; the difference shows only between '
         'processes, after unrelated draws, or when training is resumed.',
     files=['hyperion/pdfs', 'hyperion/helpers', 'hyperion/generators', 'hyperion/utils', 'hyperion/feats', 'hyperion/classifiers', 'hyperion/transforms'],
     mech=[('draws', 'every random call of the packages'), ('generator construction', 'RandomState built in constructors, reset, sample, shuffle'),
           ('seeding per epoch', 'hyperion/generators/*.py, hyperion/helpers/sequence_reader.py: reset')],
     observe=['sampled values, orders and batches of two runs with the same seed'],
     technique='static source/taint analysis of random draws, seeds and unordered or uninitialised values (abstract interpretation)',
     level_note='Each draw found by abstract interpretation is traced to the generator it draws from and each generator to its seed; sets, listings, '
                'clocks and uninitialised memory are traced to their uses.',
     rules=['determ'],
     explanation='One obligation per draw, generator construction, epoch seed, rng parameter and uninitialised allocation.')
prop('C11',
     title='Score normalisation uses the right cohort statistics for every score',
     statement='For all score and cohort matrices: TNorm subtracts from each score the mean of its test segment over the cohort models and divides by '
               'their standard deviation, ZNorm does the same with its enrolled model over the cohort segments, and the divisor is never below '
               'std_floor. ZTNorm is T-norm of Z-normalised scores with the Z-normalised cohort, TZNorm Z-norm of T-normalised scores with the '
               'T-normalised cohort, SNorm is (Z+T)/sqrt(2), and AdaptSNorm is the same with, per model and per segment, the nbest best cohort '
               'elements after the nbest_discard first ones. With masks, the statistics use only the unmasked trials of the matrix the mask '
               'belongs to. The std_floor given to a constructor is the floor that normaliser and its parts use.',
     over=['inputs'],
     quant='all score matrices, cohort sizes, masks, floors, nbest and nbest_discard; masked and unmasked use of all six normalisers',
     why='The tests run one random matrix and compare a few of the normalisers with hard-coded statistics, unmasked or with one mask; the wrong axis or mask on a square '
         'or symmetric cohort gives plausible scores.',
     files=['hyperion/score_norm'],
     mech=[('formulas', 'hyperion/score_norm/*.py: predict'), ('option passing', 'hyperion/score_norm/*.py: __init__')],
     observe=['scores returned by predict'],
     technique='static extraction of the computed formula from the source (abstract interpretation) and comparison with the reference formula in index-notation normal form',
     level_note='The value graph of predict is translated to polynomials in index notation (axes, masks, bounded sums, selections) and must equal the '
                'reference formula identically, with matching axes; masked ranking details in AdaptSNorm follow the code. Unknown constructs are undecided.',
     rules=['scorenorm'],
     explanation='One obligation per normaliser, masked or not, and per floor option.')
prop('C12',
     title='Splitting a list divides it: every element once, groups together',
     statement='The parts 1..num_parts of split_list, split_list_group_by_key and of the split methods of every list contain each element (each model and segment '
               'for trial lists) in exactly one part, whatever the sizes; elements with the same key, or rows of the same file or recording where the list is indexed by it, '
               'go to the same part. FoldList.create and TrainValEvalList.create give each element selected by the mask exactly one fold or part, no element outside of it, '
               'and never cut a group of a class in two, shuffled or not. The training and test elements of a fold are disjoint and together are the selected ones; '
               'a part by number or by name contains its elements only. Readers and scripts divide their list whenever more than one part is asked for and return the part asked for.',
     over=['inputs'],
     quant='all lists, keys, masks, numbers of parts, proportions, shuffled or not',
     why='Tests divide one list in two or three parts of a convenient size; a wrong rounding or bound loses or repeats elements only for other sizes.',
     files=['hyperion/utils', 'hyperion/helpers', 'hyperion/io', 'hyperion/bin'],
     mech=[('intervals of the parts', 'hyperion/utils/list_utils.py'), ('folds', 'hyperion/utils/fold_list.py, train_val_eval_list.py'), ('callers', 'split methods, readers')],
     observe=['parts returned by split, folds of create, get_fold, get_part'],
     technique='static extraction of the interval of each part and telescoping proof over the part number; truth tables for fold selection; argument roles of callers',
     level_note='Bounds are rational normal forms with rounding kept; the end of a part must equal the start of the next one identically, the first bound 0, the last one the number of '
                'elements or groups; floor of a product with a quotient is rejected because floating point may lose one.',
     rules=['splits'],
     explanation='One obligation per bound, selection, case of options and calling argument.')
prop('C13',
     title='A saved list loads back the same',
     statement='For every trial list, trial key, score matrix, script list, fold list, train/validation/evaluation list, segment list, extended segment list, RTTM '
               'and utterance-information table, the file written by save is read by load into an object with the same ids, orders, labels, masks, scores, offsets, '
               'ranges, times and names, whether the format is text or HDF5 (the extension chooses the same one on both sides), and whichever optional fields are '
               'present. Ids stay text, also when made of digits or equal to words such as NA. Allowed: text files of trials hold only the trials present (ids in another order, '
               'models and segments without trials dropped, scores of absent trials gone), text scores and times keep their printed decimals; masks '
               'of fold and part lists are not saved; ids contain no separator.',
     over=['inputs', 'histories'],
     quant='all contents of the lists, all combinations of present and missing optional fields, both formats',
     why='Tests save and load one or two small lists with every field filled in and names like "file1"; some lists are never saved by a test at all.',
     files=['hyperion/utils'],
     mech=[('save', 'hyperion/utils/*.py: save, save_txt, save_h5'), ('load', 'hyperion/utils/*.py: load, load_txt, load_h5, parse_script')],
     observe=['object returned by load'],
     technique='static symbolic composition of load with save over an abstract file (lines of fields, data sets, table columns)',
     level_note='The value graph of save gives an abstract file (per line: literals and fields; per data set: value; per table: columns and options); load is '
                'evaluated over it and each attribute of the result is compared with the saved one, per case of optional fields. Lists are taken non-empty.',
     rules=['lists'],
     explanation='One obligation per attribute, format and case of optional fields.')
prop('C14',
     title='Lists compare, copy, iterate and select by all of their data',
     statement='Two lists of the same kind (trial lists, keys, scores, script lists, utterance information, segments, extended segments, RTTM) compare as equal exactly '
               'when every field of one equals that of the other, optional fields present in both or in neither, and != is the opposite of ==. A copy has equal fields '
               'and shares none of its arrays or tables with the original. Each iteration starts from the first element and visits every element (every file, series or '
               'segment, as the list is indexed) once; len counts the elements and membership looks at the ids. filter keeps the elements asked for, or with keep=False '
               'exactly the others, of the field it filters by. Values computed once and kept (positions of keys, names of parts, flat clusters) are dropped when the '
               'data they were computed from changes. Allowed: scores compare with a tolerance, two empty lists may compare as equal.',
     over=['inputs', 'histories'],
     quant='all contents of the lists, all combinations of present and missing optional fields, all ways of indexing, any sequence of changes',
     why='Tests compare one list with a copy of itself, so a field left out of the comparison, or a kept value that is out of date, shows in none of them.',
     files=['hyperion/utils', 'hyperion/clustering'],
     mech=[('comparison formulas', 'hyperion/utils/*.py __eq__'), ('iteration, membership, selection', 'hyperion/utils/*.py'), ('kept values', 'hyperion/utils, hyperion/clustering')],
     observe=['results of ==, copy, iteration, len, in and filter'],
     technique='symbolic interpretation of list operations; truth-table evaluation of comparison results; dataflow from kept values to the data they depend on',
     level_note='Comparisons are boolean formulas over field comparisons, evaluated with each field equal, different, present on one side or absent; iteration bounds and element lists '
                'are matched for each way of indexing; selection by keep is resolved to the field and the set taken.',
     rules=['listops'],
     explanation='One obligation per scenario of a comparison, copied field, way of iterating, selection and change of data with a kept value.')

prop('C16',
     title='Every operation can run: no missing names, attributes, arguments or unraised errors',
     statement='Whatever option or branch of the data, feature, scoring, metric and modelling packages and of the command-line scripts is taken, the code compiles and refers only to names, '
               'attributes, modules, base classes and keyword arguments that exist, calls functions of the package with arguments they accept, '
               'calls the installed numpy, scipy, h5py, pandas and standard library with parameters they accept, and raises the errors it builds. A branch never stops on a NameError, AttributeError, TypeError for a wrong call, or '
               'UnboundLocalError, no function computes with a value or name that is missing because an optional argument was left out, and a detected error is never silently dropped.',
     over=['inputs'],
     quant='all functions, methods and branches of hyperion.{utils,io,helpers,score_norm,calibration,classifiers,transforms,metrics,feats,pdfs,'
           'generators,clustering} and of the command-line scripts hyperion/bin (Keras ones excepted), all option combinations',
     why='Tests execute one path per function; optional arguments, rarely used subclasses and error branches are never run, and Python only '
         'notices a wrong name when the line executes.',
     files=['hyperion/utils', 'hyperion/io', 'hyperion/helpers', 'hyperion/score_norm', 'hyperion/calibration', 'hyperion/classifiers',
            'hyperion/transforms', 'hyperion/metrics', 'hyperion/feats', 'hyperion/pdfs', 'hyperion/generators', 'hyperion/clustering', 'hyperion/bin'],
     mech=[('name binding', 'every function and class body of the packages'), ('calls between functions', 'constructors and factories, super() chains'),
           ('error branches', 'raise statements and checks')],
     observe=['exceptions raised by any call'],
     technique='static name, attribute, call-signature and definite-assignment analysis over the whole program',
     level_note='Scope resolution for every name; attribute sets closed over class hierarchies; calls bound to resolved signatures by abstract interpretation; '
                'only definite errors are reported. Unfinished modules (pdfs.hmm, pdfs.jfa, utils.misc) are outside.',
     rules=['resolve'],
     explanation='Every name load, self attribute, module attribute, resolved call, super() and literal format string of the packages is one obligation.')
prop('C06',
     title='Command-line options reach the object they configure',
     statement='Every option a component registers with add_argparse_* (helpers, classifiers, transforms, features, generators, readers) is picked up by the '
               'matching filter_* under the same prefix, keeps its meaning (a --no-x flag switches x off, option a never sets parameter b), is accepted by the '
               'constructor or factory it is meant for and is used there. Defaults are values the option itself accepts (member of its choices, of its type), '
               'the choices offered are the ones the class knows, and flags change something. Each command-line script passes its main function exactly the '
               'options it defines, with no missing, unknown, doubly registered or silently ignored option, and never computes with a value or name that '
               'is missing because the optional options were left out.',
     over=['inputs'],
     quant='all options of all components, with and without a prefix, and all options of the command-line scripts hyperion/bin (Keras ones excepted)',
     why='No test parses a command line; a dropped or crossed option leaves the default in place and the run gives plausible results for another setting.',
     files=['hyperion/helpers', 'hyperion/classifiers', 'hyperion/transforms', 'hyperion/feats', 'hyperion/generators', 'hyperion/io', 'hyperion/bin'],
     mech=[('option registration and filtering', 'add_argparse_*args / filter_*args pairs of each class'), ('script wiring', "hyperion/bin/*.py: __main__ blocks")],
     observe=['arguments of constructors and main functions after parsing'],
     technique='static option-flow analysis (abstract interpretation of registration, filtering and script main blocks)',
     level_note='Registration and filter functions are interpreted with a symbolic prefix and keyword dictionary; script main blocks with the namespace argparse '
                'would build. Option names built from non-constant strings are undecided.',
     rules=['cli'],
     explanation='Each add_argument call, filter key and script option is followed from the parser to the constructor or function parameter it reaches.')
prop('C04',
     title='Kaldi archives: readers take exactly what the writer wrote',
     statement='A matrix or vector written to a Kaldi archive in binary form (uncompressed, or compressed with any method) is read back with the same '
               'shape and element type, decoded with the inverse of the coding, columns and rows in place. Reading it sequentially, skipping it, '
               'reading only its shape or a row range leaves the file exactly at the next entry, and a row range returns the asked rows. The coded values and attributes '
               '(format, minimum, range, percentiles, dimensions) split out of a compressed matrix rebuild the same compressed matrix.',
     over=['inputs'],
     quant='all matrix sizes, element types, compression methods, row offsets and counts, sequential and random access',
     why='The tests write a few small matrices and compare with a tolerance; a wrong byte count shows only when another entry follows, for some format or '
         'with a row range, and then every later utterance is garbage.',
     files=['hyperion/utils/kaldi_matrix.py', 'hyperion/utils/kaldi_io_funcs.py'],
     mech=[('uncompressed', 'hyperion/utils/kaldi_matrix.py: KaldiMatrix.read, write, read_shape'),
           ('compressed', 'hyperion/utils/kaldi_matrix.py: KaldiCompressedMatrix.compress, read, write, read_shape, to_ndarray, get_data_attrs, build_from_data_attrs, scale'),
           ('primitives', 'hyperion/utils/kaldi_io_funcs.py')],
     observe=['values read back', 'file position after reading'],
     technique='static wire-layout analysis (abstract interpretation of writer and readers, sizes as polynomials in the matrix dimensions)',
     level_note='The writer gives a symbolic layout; reads and seeks of every reader are summed as polynomials over it; quantisers compared as affine maps. Text mode is outside.',
     rules=['kaldi'],
     explanation='One obligation per (writer layout, reader, access mode) for consumed bytes, returned rows, header fields, and per quantiser for decode(encode(x)).')
prop('C05',
     title='Readers return, under each key, that recording: the asked rows, transformed exactly once',
     statement='Whatever mixture of row ranges (user list or number, scp range), byte offsets, archives and open files, every feature reader (Ark or H5, '
               'sequential or random access) returns under a key the rows of that key in the archive the list names: the user range is taken inside the '
               'scp range and never leaves it, compressed data is decoded with its own attributes, and the transform is applied once. Reported shapes, row '
               'counts and dimensions agree with what read returns. Sequential readers visit the (split) list in order, once, num_records at a time. Audio readers '
               'return for a segment samples int(tbeg*fs) to int(tend*fs) of its file. Writers store each item under its own key and list it in the scp '
               'with the path and position where it is.',
     over=['inputs', 'histories'],
     quant='all lists, archives, ranges, split parts, compression, item numbers, sequences of read/reset calls',
     why='The tests use one archive, no scp ranges and the same range for all; taking a neighbouring row, range or archive still gives a plausible matrix.',
     files=['hyperion/io/data_reader.py', 'hyperion/io/ark_data_reader.py', 'hyperion/io/h5_data_reader.py', 'hyperion/io/audio_reader.py',
            'hyperion/io/ark_data_writer.py', 'hyperion/io/h5_data_writer.py', 'hyperion/io/audio_writer.py'],
     mech=[('feature readers', 'hyperion/io/ark_data_reader.py, h5_data_reader.py: read, read_shapes, read_num_rows, read_dims, __init__'),
           ('ranges', 'hyperion/io/data_reader.py: _combine_ranges, _apply_range_to_shape'),
           ('audio', 'hyperion/io/audio_reader.py: read'),
           ('writers', 'hyperion/io/ark_data_writer.py, h5_data_writer.py, audio_writer.py: write')],
     observe=['keys and data returned by read', 'shapes returned by read_shapes', 'scp files written'],
     technique='static abstract interpretation with case splitting on the returned value graphs (symbolic lists, archives and ranges)',
     level_note='The item appended in the read loop is rewritten under each case of (user range, scp range, archive state, offset, compression) and compared, as a polynomial '
                'in the range bounds, with the row it must stand for.',
     rules=['readers', 'rw'],
     explanation='One obligation per (reader, method, case, aspect): key, archive, offset, rows, bound, decode, transform, cursor; per writer: item, position, list line.')
prop('C17',
     title='Gaussians and Gaussian mixtures: densities, statistics and updates follow the model',
     statement='For every model size, data and sample weights: Normal, NormalDiagCov, GMM, GMMDiagCov and GMMTiedDiagCov compute the log-density of the '
               'Gaussian or mixture they represent, the same from standard parameters and from natural parameters; compute_eta, compute_std, '
               'compute_A_nat, compute_A_std, logLambda, cholLambda and Sigma are the conversions between the two parametrisations; compute_pz is the '
               'posterior of the components; accumulated statistics are the weighted counts, first and second order sums of the data; '
               'norm_suff_stats centres and whitens them with the mean and covariance of their component; Mstep sets weights, means and (floored) '
               'variances to the maximum-likelihood values of the statistics, and leaves natural parameters and cached quantities consistent with them.',
     over=['inputs', 'histories'],
     quant='all data, weights, statistics, parameter values and dimensions; weighted or not, standard or natural parameters, first or second order, tied or untied',
     why='The tests compare a few of these on one small random model, mostly against values computed the same way; a wrong term, axis or stale cache changes likelihoods slightly.',
     files=['hyperion/pdfs/core', 'hyperion/pdfs/mixtures'],
     mech=[('single Gaussians', 'hyperion/pdfs/core/normal.py, normal_diag_cov.py'), ('mixtures', 'hyperion/pdfs/mixtures/gmm.py, gmm_diag_cov.py, gmm_tied_diag_cov.py, exp_family_mixture.py')],
     observe=['returned likelihoods, posteriors, statistics', 'parameters after Mstep'],
     technique='static extraction of the computed formula from the source (abstract interpretation) and comparison with the reference formula in index-notation normal form',
     level_note='Each method is interpreted symbolically on a symbolic model; its value graph, translated to index-notation sums (with Cholesky factors, inverses, '
                'log-sum-exp, floors and block structure as algebraic operators), must equal the reference identically. Unknown constructs are undecided; random '
                'sampling, initialisation and k-means are not covered.',
     rules=['models'],
     explanation='One obligation per method, branch and returned part.')
prop('C18',
     title='PLDA models: posteriors, likelihood ratios, bounds and updates follow the model',
     statement='For every model, count, data and combination of update flags: in SPLDA, FRPLDA and PLDA, compute_py_g_x returns the mean, covariance and log-density at '
               'zero of the class posterior and their sums, Estep the expected sufficient statistics, elbo the evidence computed from them, MstepML and MstepMD the '
               'maximum-likelihood and minimum-divergence values of the parameters that are to be updated; llr_1vs1 and llr_NvsM_book are the log-likelihood '
               'ratios of the same-class and different-class hypotheses for every pair (the same value for N=M=1), and the vavg methods are llr_1vs1 on class '
               'averages; compute_stats_soft, compute_stats_hard and center_stats are the weighted and centred class statistics; weighted averages of models '
               'average means and covariances.',
     over=['inputs'],
     quant='all data, class counts (integer or not), numbers of classes, dimensions, parameter values and update flags',
     why='The tests train on one synthetic set and compare scores with stored values or only check shapes; PLDA (with channel factors) mixed updates, full-rank second order terms and non-unit counts are '
         'not reached, and a wrong cross term only shifts scores a little.',
     files=['hyperion/pdfs/plda'],
     mech=[('posteriors and statistics', 'hyperion/pdfs/plda/*.py: compute_py_g_x, Estep, compute_stats_*'), ('training', 'hyperion/pdfs/plda/*.py: elbo, MstepML, MstepMD'),
           ('scoring', 'hyperion/pdfs/plda/*.py: llr_*')],
     observe=['scores, posteriors, statistics', 'parameters after each step'],
     technique='static extraction of the computed formula from the source (abstract interpretation) and comparison with the reference formula in index-notation normal form',
     level_note='As C17; loops over classes or over distinct counts are turned into sums over classes, joint updates are inverses of block matrices. '
                'Sampling and initialisation are not covered.',
     rules=['plda'],
     explanation='One obligation per method, branch and returned part.')
prop('C19',
     title='Feature transforms apply, and learn, the projection they stand for',
     statement='For every input and parameter value: predict of CentWhiten, PCA, LDA, NDA, LNorm, MVN, NAP and of the uncertainty-propagating CentWhitenUP and LNormUP '
               'centres, projects, scales and length-normalises as documented (leaving out a step whose parameter is None, and propagating the variances with the squares of the '
               'means\' coefficients), and TransformList.predict chains its members in order; fit sets the mean and the projection (leading eigenvectors in '
               'decreasing order of eigenvalue, with the sign convention, whitened or not, cut to the asked dimension) of the given data, covariance or scatter '
               'matrices, updates only what update_mu / update_T ask for, and SbSw.fit returns the class-averaged mean, between-class and within-class scatter.',
     over=['inputs'],
     quant='all data, labels, means, covariances, scatter matrices, dimensions and update flags',
     why='The tests only round-trip parameters and compare the output of one fixed random draw; a lost sign, order, centring or normalisation passes them.',
     files=['hyperion/transforms'],
     mech=[('application', 'hyperion/transforms/*.py: predict'), ('estimation', 'hyperion/transforms/*.py: fit')],
     observe=['transformed vectors', 'mu, T, s, U, Sb, Sw after fit'],
     technique='static extraction of the computed formula from the source (abstract interpretation) and comparison with the reference formula in index-notation normal form',
     level_note='As C17; eigenvectors and singular vectors are opaque functions of the matrix they decompose, sums over the values of the labels are written as sums over the elements '
                'of a class. Gaussianizer (order statistics) and NSbSw (nearest neighbours) are not covered.',
     rules=['projections'],
     explanation='One obligation per method, branch and resulting array.')
prop('C20',
     title='The numeric helpers compute the functions they are named after',
     statement='For every input: invert_pdmat and invert_trimat apply, and return, the inverse (left or right) and log-determinant of their argument, logdet_pdmat its '
               'log-determinant; softmax and logsumexp are taken over the axis asked for; logsigmoid, neglogsigmoid and sigmoid are the logistic functions; fisher_ratio '
               'and fisher_ratio_with_precs are the quadratic form of the mean difference in the inverse of the summed covariances; int2onehot has a one at the class of each element; '
               'fullcov_varfloor and fullcov_varfloor_from_cholS raise the eigenvalues of S in the metric of the floor to one (floor given as matrix, factor or number, upper or '
               'lower); symmat2vec, vec2symmat, trimat2vec and vec2trimat pack and unpack triangles and scale the diagonal as asked.',
     over=['inputs'],
     quant='all matrices, vectors, axes and options (factorised or not, upper or lower, left or right, scaled diagonal)',
     why='The tests of these helpers call them with one fixed matrix and the default options; every model above relies on the other branches.',
     files=['hyperion/utils/math.py'],
     mech=[('linear algebra helpers', 'hyperion/utils/math.py: invert_pdmat, invert_trimat, logdet_pdmat, fullcov_varfloor*'), ('packing', 'hyperion/utils/math.py: symmat2vec, vec2symmat, trimat2vec, vec2trimat'),
           ('normalisation', 'hyperion/utils/math.py: softmax, logsumexp, sigmoid')],
     observe=['the returned arrays and functions'],
     technique='static extraction of the computed formula from the source (abstract interpretation) and comparison with the reference formula in index-notation normal form',
     level_note='As C17; factorisations of numpy and scipy are opaque functions with their defining identities, the small additive guards against overflow are accepted as such.',
     rules=['mathfn'],
     explanation='One obligation per helper and combination of options; the helper is read through an analysis-owned composition of calls when it returns functions.')
prop('C08',
     title='Detection metrics are the costs and error rates they are named after',
     statement='For every set of scores and prior, taking the vertices of the ROC convex hull as given: compute_dcf is prior*p_miss+(1-prior)*p_fa, divided by min(prior, 1-prior) when '
               'normalised, for one or several priors; compute_act_dcf uses the miss and false-alarm rates at the Bayes threshold of each prior (scores equal to the threshold are accepted); compute_min_dcf returns the '
               'smallest cost over the hull and the error rates at that point; compute_eer is the rate where miss and false alarm are equal and compute_prbep the count at which they are; '
               'fast_eval_dcf_eer returns the same numbers; compute_cllr averages the two logistic costs in bits; effective_prior folds the costs into the prior.',
     over=['inputs'],
     quant='all score vectors (any number of targets and non-targets, any order, ties included), priors, costs and normalisation flags',
     why='The tests score one synthetic set or one where all the scores are equal; a swapped class, a wrong threshold or prior passes them (Cllr had the wrong sign for non-targets).',
     files=['hyperion/metrics'],
     mech=[('costs', 'hyperion/metrics/dcf.py'), ('error rates', 'hyperion/metrics/eer.py'), ('calibration cost', 'hyperion/metrics/cllr.py'), ('prior', 'hyperion/metrics/utils.py: effective_prior')],
     observe=['returned costs and error rates'],
     technique='static extraction of the computed formula from the source (abstract interpretation) and comparison with the reference formula in index-notation normal form',
     level_note='The pool-adjacent-violators step and the walk over the hull are opaque: compute_rocch and rocch2eer are symbols here. Ranks of sorted scores are replaced by counts of smaller scores (stable sorts only).',
     rules=['metrics'],
     explanation='One obligation per metric, kind of prior, option and returned part.')
prop('C21',
     title='Back-end classifiers and calibration score with, and learn, the model they stand for',
     statement='For every input and parameter value: LinearGBE evaluates the Gaussian linear score, log-likelihood and Student-t posterior predictive of each class (normalised over classes when asked); fit of '
               'LinearGBE sets means, shared precision and counts to their maximum-likelihood or MAP values, balanced over classes or not, updating only what is asked, and takes prior and posterior relevance factors; '
               'LinearGBEUP adds the covariance of each embedding to that of the class; QScoringHomoGBE scores the ratio of joint to separate evidence and fits class posteriors with or without a prior; '
               'LogisticRegression, BinaryLogisticRegression and LinearSVMC return scores, posteriors and log-posteriors of the same linear function with the configured priors; '
               'GaussCalibration fits class means, shared variance and prior (weighted or not) and maps scores to log-likelihood ratios.',
     over=['inputs'],
     quant='all data, labels or responsibilities, weights, priors, relevance factors, class counts and options',
     why='There are no tests for these classifiers beyond construction; scoring and fitting formulas are used on data where any monotone change still looks plausible.',
     files=['hyperion/classifiers', 'hyperion/calibration'],
     mech=[('scoring', 'hyperion/classifiers/*.py: predict, eval_*'), ('training', 'hyperion/classifiers/*.py: fit'), ('calibration', 'hyperion/calibration/gauss_calibration.py')],
     observe=['scores, posteriors', 'mu, W, beta, nu, N after fit', 'scale and bias of the calibration'],
     technique='static extraction of the computed formula from the source (abstract interpretation) and comparison with the reference formula in index-notation normal form',
     level_note='As C17. What scikit-learn learns inside LogisticRegression and LinearSVMC, the precision learnt by LinearGBEUP, the EM of UnsupGaussCalibration and the unfinished GreedyFusion are not covered.',
     rules=['classif'],
     explanation='One obligation per method, option and returned part.')

prop('C22',
     title='Feature extraction takes the samples, frames and steps it stands for',
     statement='For every signal length, frame length, shift and option: frame i of stft, strft, st_logE, Framing.create_frames and Splicing.splice covers samples (rows) i*shift to '
               'i*shift+length-1 of its input and the number of frames is that of the frames that fit; istft and istrft divide the overlap-added frames by the overlap-added windows; '
               'FeatureWindowFactory returns the window of the given name; MFCC.compute started from any input step and stopped at any output step gives the value of the full pipeline at '
               'that step (padding, dither, offset and preemphasis filters, window, magnitude or power spectrum, log filter banks, lifted cepstra, floored log-energy in the first place or before the '
               'filter banks); EnergyVAD marks the frames whose log-energy exceeds threshold + scale * mean, or with a context those around which more than the given proportion of the frames do so; '
               'MeanVarianceNorm subtracts the mean and divides by the standard deviation of the whole signal and then of the window of left_context past and right_context future frames, cut at the ends; FrameSelector keeps exactly the frames whose flag is set, '
               'ignores surplus frames or flags within the tolerance and refuses larger differences. Constructors derive frame length, shift, filters, window and lifter from their options.',
     over=['inputs'],
     quant='all signals, lengths, shifts, FFT lengths, windows, input and output steps, energy options, edge handling, flag lists',
     why='The only feature tests run one recording through one default configuration; an off-by-one frame, a step resumed at the wrong stage or a window misapplied still gives smooth features.',
     files=['hyperion/feats', 'hyperion/utils/framing.py', 'hyperion/utils/splicing.py'],
     mech=[('short-time analysis', 'hyperion/feats/stft.py'), ('pipeline', 'hyperion/feats/mfcc.py: compute'), ('voice activity', 'hyperion/feats/energy_vad.py: compute, frame_selector.py: select'),
           ('framing', 'hyperion/utils/framing.py, splicing.py'), ('windows', 'hyperion/feats/feature_windows.py')],
     observe=['frames, spectra, cepstra, selected frames'],
     technique='static extraction of the computed formula from the source (abstract interpretation) and comparison with the reference formula in index-notation normal form',
     level_note='Loops over frames are solved to affine index expressions; DFT, DCT, linear filters, padding and random numbers are symbolic linear maps or heads, so the result '
                'is exact in the samples used and where they go; rounding and the library transforms themselves are not analysed; windows and contexts are decided for each order of the '
                'lengths involved (symbolic in the lengths themselves). Filter-bank shapes and normalize_slow with a window are outside.',
     rules=['feats'],
     explanation='One obligation per function, input step, output step and option combination.')
prop('C23',
     title='Clusterings join what is most alike and cut where asked',
     statement='Agglomerative clustering joins first the pair with the highest score (the smallest distance when the metric is a distance), never a pair the mask rules out while '
               'others are left, and the heights of its tree are in the units of the input. Cutting at a threshold gives the merges with heights at the threshold or on its accepted side and no '
               'others; asking for k clusters applies exactly the first N-k merges (k limited to N), whether or not all the cuts were computed before. Purities and other rates '
               'are shares of the right counts. K-means assigns each vector to the nearest mean, each mean is that of the vectors assigned to it, and the '
               'assignment returned was made with the means kept.',
     over=['inputs', 'histories'],
     quant='all score matrices, masks, metrics, thresholds, numbers of clusters and orders of calls',
     why='The tests use two small score matrices with one metric, where a cut one merge off or a mask of the wrong sign may give the same clusters.',
     files=['hyperion/clustering'],
     mech=[('tree and cuts', 'hyperion/clustering/ahc.py'), ('k-means', 'hyperion/clustering/kmeans.py')],
     observe=['tree, labels, means'],
     technique='symbolic interpretation of the clustering methods; algebraic comparison of distances, heights, thresholds and counts of merges with their definitions',
     level_note='scipy linkage is taken by its documentation; loops over merges are compared with the label update of one merge; convergence of k-means is not decided.',
     rules=['clusters'],
     explanation='One obligation per metric with and without mask, threshold, way of cutting, and step of k-means.')

prop('C24',
     title='Frames and segment times agree',
     statement='Framing an array of n samples or rows gives floor((n - length)/shift) + 1 frames, frame i holding the length values from i x shift in order; padding adds the '
               'overlap on the side asked for, or its two halves. Splicing stacks for each position the left and right contexts, or the positions of the pattern, moving by the '
               'shift. The binary VAD of a list of segments is 1 from the rounded start to the rounded end of every segment of the key, 0 elsewhere, and is as long as asked or as '
               'the latest end; the speaker matrix of an RTTM sets, for every segment of the file, the frames of the segment in the column of its name. Merging adjacent segments '
               'joins those of the same file, type and name whose gap is at most the margin, into a segment that spans both; removing overlaps cuts two consecutive segments of the '
               'same file and type at the middle of their overlap and leaves the others as they are.',
     over=['inputs'],
     quant='all lengths, shifts, contexts, patterns, paddings, segments (nested, overlapping, in any order of ends), frame shifts and margins',
     why='No test runs framing, splicing or any of the segment conversions.',
     files=['hyperion/utils/framing.py', 'hyperion/utils/splicing.py', 'hyperion/utils/segment_list.py', 'hyperion/utils/rttm.py'],
     mech=[('framing and splicing', 'hyperion/utils/framing.py, splicing.py'), ('segments to frames', 'SegmentList.to_bin_vad, RTTM.to_matrix'), ('joins and cuts', 'hyperion/utils/rttm.py')],
     observe=['frames, vectors, matrices and segments returned'],
     technique='symbolic interpretation of the functions; algebraic comparison of frame counts, slice bounds, paddings and segment times with their definitions',
     level_note='Counts, bounds and times are rational expressions compared exactly; rounding is matched as an operation; pandas columns stand for the value of each row and of the row before.',
     rules=['frames'],
     explanation='One obligation per padding, number of dimensions, kind of context, kind of key and segment operation.')

prop('C25',
     title='Operating points, ROC hull and isotonic calibration',
     statement='compute_roc returns, for every number k of trials below the threshold, the fraction of targets among the k lowest scores and the fraction of non-targets among '
               'the rest, from (0, 1) to (1, 0). compute_rocch returns one vertex per pooled block of trials, from (0, 1) to (1, 0), with the same two fractions, tied scores keeping '
               'targets before non-targets. pavx pools adjacent blocks while their means do not increase and returns the fit repeated over each block, the widths of the blocks, '
               'which sum to the number of values, and their means. opt_loglr returns, for each trial in its own order, the log odds of the fitted posterior less the log prior odds, '
               'the Laplace option adding one trial of each class at both ends and removing them from the result. The area under the hull is the trapezoid sum over all its segments, '
               'and the equal error rate the highest crossing over all of them.',
     over=['inputs'],
     quant='all score lists, numbers of trials, ties, orders and calibration methods',
     why='The tests of metrics use one Gaussian score set with loose tolerances and no ties.',
     files=['hyperion/metrics/roc.py', 'hyperion/metrics/utils.py'],
     mech=[('points and hull', 'hyperion/metrics/roc.py: compute_roc, compute_rocch, compute_area_under_rocch, rocch2eer'), ('pooling and calibration', 'hyperion/metrics/utils.py: pavx, opt_loglr')],
     observe=['error rates, vertices, widths, log likelihood ratios returned'],
     technique='symbolic interpretation of the functions; error rates compared as rational functions of the cumulative number of targets; loops by induction on the value each variable stands for',
     level_note='That the hull and fit are optimal is not claimed (C32): what is decided is one pooling step, its condition, and all that is computed from the blocks.',
     rules=['curves'],
     explanation='One obligation per output, calibration method and loop.')

na('C30', title='Expectation-maximisation training never lowers the evidence',
   statement='Each iteration of fit of the Gaussian-mixture and PLDA models leaves the evidence (elbo) of the training data at least as high as before, up to rounding, for every data set and update flags.',
   over=['inputs', 'histories'], quant='all data sets, weights, initialisations, update flags and numbers of iterations',
   why='Tests look at one small data set and at the final value only.',
   files=['hyperion/pdfs'], mech=[('training loops', 'hyperion/pdfs: fit')], observe=['elbo per epoch'],
   reason='A monotonicity statement over real-valued iterates: it needs an inequality proof over the composed E and M steps (with floors, which break it in general). '
          'Statically decided here are the parts it follows from: the E step, the M step and the bound are each the formula of the model (C17, C18).')
na('C31', title='Lossy matrix compression stays within its error bound',
   statement='For every matrix, each value read back from a compressed archive differs from the written one by at most half a coding step of its column or matrix.',
   over=['inputs'], quant='all matrices, including constant, tiny, huge and non-finite values',
   why='Tests compress a few random matrices with a loose tolerance.',
   files=['hyperion/io/kaldi_matrix.py'], mech=[('coding', 'hyperion/io/kaldi_matrix.py: CompressedMatrix')], observe=['decoded values'],
   reason='The bound is over floating-point rounding and clipping of run-time values; no sound static argument in reach bounds it. The coding and decoding formulas, layouts and element types are decided in C04.')
na('C32', title='The ROC convex hull and isotonic calibration are optimal',
   statement='pavx returns the non-decreasing sequence closest to its input, and rocch the convex hull of the ROC of any set of scores.',
   over=['inputs'], quant='all score lists with ties, empty classes, infinite values',
   why='Tests use one Gaussian score set.',
   files=['hyperion/metrics/utils.py', 'hyperion/metrics/roc.py'], mech=[('pool adjacent violators', 'hyperion/metrics: pavx, rocch')], observe=['vertices and widths'],
   reason='Optimality of a data-dependent stack algorithm: the invariant relates unbounded run-time sequences; a static proof would be a functional-correctness proof of the loop, not an analysis of this family. '
          'C08 takes the vertices as given and decides everything computed from them.')
na('C33', title='Features agree with Kaldi',
   statement='MFCC, energy and VAD values equal those of the Kaldi tools for the same options, to single-precision accuracy.',
   over=['inputs'], quant='all waveforms and options',
   why='The tests compare nothing with Kaldi output.',
   files=['hyperion/feats'], mech=[('pipeline', 'hyperion/feats/mfcc.py, energy_vad.py, filter_banks.py')], observe=['feature values'],
   reason='The oracle is another program, absent here, and the values are floating-point results; only the formulas of the pipeline can be decided from the source (C22).')
na('C34', title='Training resumes and converges with the Keras models',
   statement='The Keras variational auto-encoder, embedding and tied-VAE models save, resume and score as their NumPy counterparts.',
   over=['inputs', 'histories'], quant='all networks, optimizers, restart points',
   why='No Keras test runs in this environment.',
   files=['hyperion/keras', 'hyperion/bin'], mech=[('models', 'hyperion/keras')], observe=['weights and scores'],
   reason='Keras and TensorFlow are not installed, so neither signatures nor behaviour of what these modules call can be resolved; any static verdict would rest on guesses about an absent library version, and no defect could be demonstrated.')
