#!/usr/bin/env python3
"""writes properties.jsonl (source of truth for the property texts)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

p('C01', 'C interface never unwinds and reports every failure by its return value',
  'No call of the C interface lets a Rust panic unwind into the caller: all fallible work runs inside a panic boundary. '
  'A failed call returns the documented error value (-1, or null for allocation) and a successful one returns 0 / the handle / the answer, for every argument and every library state; null contexts, unknown option names and values, out-of-range features and missing data or model are failures.',
  ['inputs', 'histories', 'fault_sequences'], 'every exported function, every argument combination (buffers and strings, where the call uses them, are valid) and every state the context can be in',
  'no existing test calls the C interface at all; a panic across the boundary is undefined behaviour that only shows for the failing argument',
  ['src/c_api.rs'], [('wrap_catch_unwind!', 'src/c_api.rs'), ('bb_* exported functions', 'src/c_api.rs')])
p('C02', 'C context lifecycle, staging order and caller buffers',
  'A context starts with default options and no data or model; refreshing replaces the data with one of the given size under the current options, options can only be changed while no data is loaded, training stores the model of the current data/options, and prediction needs both. '
  'Feature columns are read for exactly the number of examples into the addressed feature (target last), predictions are written to exactly that many output values, and every context field is released exactly once on dealloc.',
  ['histories', 'inputs'], 'all sequences of C calls on one context, all arguments',
  'no test drives the C interface; ordering rules quantify over call histories', ['src/c_api.rs', 'src/data.rs'],
  [('Context::alloc/dealloc', 'src/c_api.rs'), ('bb_refresh_data/bb_set_feature_data/bb_set_config_field/bb_train/bb_predict', 'src/c_api.rs')],
  [('Context', 'options, staged data, last model', 'src/c_api.rs')])
p('C03', 'Training is deterministic and independent of thread scheduling',
  'For fixed data and options (including the seed) training yields the same model in every run, on any number of threads and under any schedule. '
  'All randomness comes from the generator seeded by the configured seed, and nothing computed depends on time, addresses, the environment, iteration order of hash containers, or the order in which parallel workers finish.',
  ['schedules', 'configurations', 'histories'], 'all thread schedules of the parallel histogram phase, all seeds and repeated runs',
  'a test sees one schedule and one hash seed', ['src/tree/learner.rs', 'src/dataset.rs', 'src/slice_store.rs', 'src/boost.rs'],
  [('parallel histogram build', 'src/tree/learner.rs build_histograms'), ('SmallRng::seed_from_u64(config.random_seed)', 'src/dataset.rs')])
p('C04', 'Boosting loop: bias plus exactly one tree per iteration, in order',
  'Training initialises the objective on the target once, gives the ensemble the initial value of the objective as its bias, and then for each of the configured number of iterations recomputes the gradients from the current predictions, refreshes the binned data with exactly those gradients and bounds, learns one tree on them and appends it. '
  'Metrics are only observed: they are evaluated on the target and the running predictions at multiples of the metric frequency after the tree of that iteration, and never influence the model.',
  ['inputs', 'configurations', 'histories'], 'all data, option settings, numbers of iterations and objectives',
  'the tests contain no boosting run; ordering of steps holds for every iteration count', ['src/boost.rs', 'src/tree/tree.rs'],
  [('Booster::train / train_one_iter', 'src/boost.rs'), ('AdditiveTree::push_tree, set_bias', 'src/tree/tree.rs')])
p('C05', 'Running predictions follow the trees exactly',
  'While a tree is learned every training example in the bag is reported to the objective in exactly one leaf, with the same value that is stored in the tree for that leaf; out-of-bag examples move by the tree prediction of that example. '
  'So after each iteration the running predictions used for the next gradients equal bias plus the sum of all trees, for sampled and unsampled, compressed and uncompressed training.',
  ['inputs', 'configurations', 'histories'], 'all data sets, bag fractions, depths and split sequences',
  'tests check a few fixed leaves; the agreement ranges over all examples and trees', ['src/tree/learner.rs', 'src/objective.rs', 'src/dataset.rs'],
  [('predict_leaf_value, predict_child_leaf_values, predict_out_of_bag_examples', 'src/tree/learner.rs'), ('TreeLearner::train', 'src/tree/learner.rs')])
p('C06', 'Tree growth keeps partition and tree structure consistent',
  'Growing a tree processes each reachable node once: a node either gets a split, a value, or - below the depth limit - two children that inherit its examples, left where the split bit is set and right where it is not. '
  'The split recorded in the tree (feature, kind of test, threshold) is the one that produced that partition, children of node n are 2n+1 and 2n+2, the depth never exceeds the maximum, and a split node has both children present.',
  ['inputs', 'configurations'], 'all data, depth limits and split outcomes', 'tests grow two or three fixed trees',
  ['src/tree/learner.rs', 'src/tree/tree.rs', 'src/dataset.rs'],
  [('TreeLearner::train, get_left_right_n2s, split_examples', 'src/tree/learner.rs'), ('Tree::split_node, left_child, right_child, is_max_leaf_node', 'src/tree/tree.rs')])
p('C07', 'Splits are admissible and the best one is taken',
  'A node is split only when the best candidate over all active features and their bins improves the loss by strictly more than the configured minimum gain and leaves at least the configured minimum number of examples on both sides. '
  'Among admissible candidates the first with maximal gain is chosen, where the gain is the loss of the node minus the losses of both sides under the configured L2 regularisation, and the split carries the test kind and threshold of its feature.',
  ['inputs', 'configurations'], 'all histograms, counts, option values', 'tests check single fixed histograms',
  ['src/tree/learner.rs', 'src/dataset.rs'], [('find_best_split, get_loss', 'src/tree/learner.rs'), ('get_split_value', 'src/dataset.rs')])
p('C08', 'Histograms equal per-bin gradient sums and counts',
  'For every node, feature and bin the stored statistics are the sum of the discretised gradients (scaled back to gradient units) and the number of the examples of that node whose bin bit is set; the right sibling gets parent minus left. '
  'Node totals are maintained the same way, so left and right statistics always add up to the node for every split.',
  ['inputs', 'configurations', 'schedules'], 'all example sets, widths, compressions and parallel schedules',
  'tests sample fixed sets', ['src/tree/learner.rs', 'src/slice_store.rs'],
  [('build_histograms, get_grad_sum, hists_subtract', 'src/tree/learner.rs, src/slice_store.rs')])
p('C09', 'Compressing a node changes nothing observable',
  'Dropping the all-zero blocks of the example set of a node keeps exactly the non-zero blocks, in order, with their original positions and the gradients of the same examples, and the freed tail is empty. '
  'Whether compression happens depends only on the fraction of zero blocks against the threshold, and the statistics, leaf values and partitions computed from the compressed form are those of the uncompressed one.',
  ['inputs', 'configurations'], 'all example sets, thresholds, gradient widths', 'tests use one or two fixed masks',
  ['src/tree/learner.rs', 'src/slice_store.rs'], [('compr_examples_w{1,2,4,8}, split_examples', 'src/tree/learner.rs')])
p('C10', 'Slice store: live allocations never overlap, are aligned and initialised',
  'Every allocation returns a range of the requested length inside initialised storage, aligned as promised, disjoint from all other live allocations, filled with the requested value; growing keeps all contents. '
  'A range is reused only after it was freed, freeing restores the full extent, and reset forgets all ranges.',
  ['histories', 'inputs'], 'all sequences of alloc/free/reset/access', 'tests run a handful of fixed sequences',
  ['src/slice_store.rs'], [('alloc_slice, free_slice, resize, reset', 'src/slice_store.rs')],
  [('free, slice_ends, len', 'free list, full extents, bump pointer', 'src/slice_store.rs')])
p('C11', 'Safe operations on packed storage stay inside it',
  'No safe public operation on bit blocks, bit vectors, bit slices, bitsets, the slice store or the counting kernels reads or writes outside the storage it was given, whatever indexes, lengths or contents are passed: it either stays in bounds or panics. '
  'Views of storage as other integer types cover exactly the same bytes.',
  ['inputs'], 'all indexes, lengths and contents', 'out-of-bounds reads usually go unnoticed by tests',
  ['src/slice_store.rs', 'src/bitblock.rs', 'src/bitslice.rs', 'src/bitset.rs', 'src/simd.rs', 'src/count_and_sum.rs'],
  [('unsafe blocks and their guards', 'src/slice_store.rs, src/bitblock.rs, src/simd.rs, src/count_and_sum.rs, src/bitslice.rs')])
p('C12', 'Bit-level operations equal their scalar definition',
  'Single-bit get/set/enable/disable touch exactly the addressed bit; constructors set exactly the first n bits; packed values of width 1, 2, 4 and 8 read back what was written at that index and leave every other index alone. '
  'Index iterators enumerate exactly the set bits (of the vector, its intersection or its difference with a mask, mapped through the block index list when given) in increasing order of storage.',
  ['inputs'], 'all indexes, values, widths and bit patterns', 'tests sample indexes and patterns',
  ['src/bitblock.rs', 'src/bitset.rs', 'src/bitslice.rs', 'src/slice_store.rs'],
  [('get_bit/set_bit/enable_bit/disable_bit', 'src/bitblock.rs'), ('get_value/set_value, IndexIter', 'src/slice_store.rs')])
p('C13', 'Options: parsing is exact, total and matches the published table',
  'An option record sets exactly the named field to the parsed value and no other; unknown names, malformed values and malformed records give an error and change nothing else; lists are comma separated, trimmed, in order, and empty for the empty string. '
  'The defaults, names and types published for the bindings are those of the options, and the text after the first "=" of a record is the value.',
  ['inputs', 'configurations'], 'all strings and all option names', 'tests parse a few records', ['src/config.rs', 'python/bitboost_config.gen.csv'],
  [('parse_config!', 'src/config.rs'), ('parse_record, parse_record_str, parse_vec', 'src/config.rs')])
p('C14', 'Loading a CSV file either succeeds or returns an error',
  'Loading data from a path, a reader or a string never panics on account of the contents: unreadable files, undecodable text, ragged or empty input, missing or non-numeric fields and invalid categories are returned as errors. '
  'On success every record contributes one value per column, in order.',
  ['inputs', 'fault_sequences'], 'all file contents', 'tests load well-formed input only', ['src/data.rs'],
  [('Data::from_csv, from_csv_reader, from_csv_path', 'src/data.rs')])
p('C15', 'Column metadata describes the data',
  'After loading, for every column the reported limits are the minimum and maximum of its values, the cardinality of a categorical column is one more than its largest category, and a categorical column is high-cardinality exactly when that exceeds the configured number of bins. '
  'The last column is the target, the number of bins reserved per feature follows from its kind (one for binary, none for single-valued, cardinality or the configured maximum otherwise), and setting a column replaces its values.',
  ['inputs', 'configurations', 'histories'], 'all data sets and option values', 'tests check a few cells', ['src/data.rs'],
  [('Data::from_csv, set_feature_data, max_nbins', 'src/data.rs')])
p('C16', 'Example and feature sampling draws distinct items and partitions the data',
  'Each refresh of a sampled data set draws without replacement: the in-bag examples are distinct, sorted and exactly the configured number, the out-of-bag examples are exactly the others, and local positions map to the in-bag examples in order. '
  'Sampling only happens when a fraction below one is configured and at the configured refresh frequency, and the first refresh always happens.',
  ['inputs', 'configurations', 'histories'], 'all fractions, sizes, seeds and refresh counts', 'tests pin one seed',
  ['src/dataset.rs'], [('shuffle_first_k, Dataset::update, active/inactive_examples_iter', 'src/dataset.rs')])
p('C17', 'Objectives: gradients, bounds, initial and leaf values follow the loss',
  'For every objective the initial value, per-example gradient (prediction minus target sense), gradient bounds and leaf value are those of its loss with the configured parameters. '
  'Reporting a leaf moves the running prediction of exactly the listed examples by the returned value, which is the learning rate times the optimal leaf value.',
  ['inputs', 'configurations'], 'all targets, predictions, example subsets, option values', 'tests check a few numbers for some objectives',
  ['src/objective.rs', 'src/binner.rs'], [('Objective implementations', 'src/objective.rs')])
p('C18', 'Metrics compute their definition over all examples',
  'Each evaluation metric (squared error, root mean squared error, log loss, classification error for +-1 and 0/1 targets) equals its textbook definition averaged over every example, for any targets and predictions of equal length.',
  ['inputs'], 'all target/prediction vectors', 'tests sample a few vectors', ['src/metric.rs'], [('Metric implementations', 'src/metric.rs')])
p('C19', 'Names resolve to the documented objective and metric',
  'Objective and metric names are matched case-insensitively to the documented implementation, unknown names are rejected, and the name an implementation reports resolves back to it. '
  'A list of metrics resolves in order, all or nothing.',
  ['inputs'], 'all strings', 'tests never look names up', ['src/objective.rs', 'src/metric.rs'],
  [('objective_from_name', 'src/objective.rs'), ('metric_from_name, metrics_from_names, metric_for_objective', 'src/metric.rs')])
p('C20', 'Command line tool reports bad input as an error result',
  'The command line program turns every bad argument list, unknown objective or metric, bad option and unreadable or malformed data file into an error result (non-zero exit), never a panic of its own. '
  'It trains on the training file, evaluates exactly the model it trained, and prints one raw prediction per example.',
  ['inputs', 'fault_sequences'], 'all argument lists and files', 'no test runs the program', ['src/bin/run.rs'],
  [('main, parse, load_data', 'src/bin/run.rs')])
p('C21', 'Python binding agrees with the exported C interface',
  'Every foreign function the Python binding declares exists in the library with the same number, order and kind of arguments and result, every call passes arguments of those kinds, and array arguments are contiguous single precision vectors of the promised length kept alive during the call. '
  'Failures reported by the library are turned into exceptions. A context is released once and not used afterwards; options are given before the data and the data before training.',
  ['inputs', 'programs'], 'every call path of the binding', 'there are no Python tests', ['python/bitboost/bitboost.py', 'src/c_api.rs'],
  [('ctypes declarations and _rust_* wrappers', 'python/bitboost/bitboost.py'), ('exported functions', 'src/c_api.rs')])
p('C22', 'Prediction routes each example by the documented tests and sums the trees',
  'The prediction of a tree for an example is its shrinkage times (the value of the leaf reached from the root by the recorded tests, plus its bias); the ensemble prediction is its bias plus the sum over its trees. '
  'Buffer, vector and single-example forms agree, each output depends only on its own row, previous buffer contents do not matter for the ensemble, and prediction changes neither model nor data.',
  ['inputs'], 'all trees, ensembles, data sets and buffers', 'tests predict two or three rows', ['src/tree/tree.rs'],
  [('Tree::predict*, AdditiveTree::predict*', 'src/tree/tree.rs')])
p('C23', 'Binner and quantile queries',
  'A value is binned by its relative position in the range, values outside are put in the first or last bin, and inserting updates exactly that bin. '
  'Rank queries return, for a rank and for increasing ranks asked one after the other, the first bin at which the accumulated weight exceeds the rank. Bin boundaries split the range evenly; asking for a bin past the end reports the lower boundary of the last bin. Queries leave the bins unchanged.',
  ['inputs'], 'all ranges, values, bin counts, rank sequences', 'tests sample values', ['src/binner.rs'],
  [('Binner', 'src/binner.rs')])
p('C24', 'Gradient discretisation maps back to gradient units',
  'Storing a gradient clips it to the bounds and rounds its relative position to the nearest of the available levels; reading it back, or mapping a sum of levels over a count of examples, applies exactly the inverse affine map for the same width and bounds. '
  'The packed sums over a masked set, compressed or not, weigh each bit lane by its significance.',
  ['inputs'], 'all gradients, bounds, widths, masks', 'tests sample values', ['src/slice_store.rs', 'src/simd.rs', 'src/bitslice.rs'],
  [('set_scaled_value, get_scaled_value, linproj', 'src/slice_store.rs, src/bitslice.rs'), ('btslce_summ*, bitvec_count_and_*', 'src/simd.rs'), ('count_and2_c*, sum_and3_*', 'src/count_and_sum.rs')])
p('C25', 'Binned features agree with the tests stored in the tree',
  'For every active feature the bit of bin b for an example is set exactly when the test recorded for a split on that bin would send the example left: equality with the category for low-cardinality features, super-category at most b for high-cardinality ones, and the bin position relative to the b-th candidate threshold for numeric ones. '
  'Bins are rebuilt from scratch for the current bag at each refresh, and the number of bins in use never exceeds the number reserved.',
  ['inputs', 'configurations', 'histories'], 'all data, bags, gradients and option values', 'tests pin a few bit patterns', ['src/dataset.rs'],
  [('update_locard_cat, update_hicard_cat, update_num, fill_bitvecs, accumulate_bitvecs', 'src/dataset.rs')])
p('C26', 'Learned models converge and reach good accuracy',
  'With enough iterations training reduces the training loss monotonically (up to discretisation) and reaches accuracy comparable with other boosting systems.',
  ['inputs', 'configurations'], 'all data sets', 'needs measured runs over data sets', ['src/boost.rs'], [('Booster::train', 'src/boost.rs')])
p('C27', 'Sampling is statistically uniform',
  'Every subset of the configured size is equally likely to be drawn as bag or feature set, up to the quality of the pseudo-random generator.',
  ['inputs'], 'all sizes and seeds', 'distributional', ['src/dataset.rs'], [('shuffle_first_k', 'src/dataset.rs')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
