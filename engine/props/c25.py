"""Filling the bit rows of a feature (low- and high-cardinality categories, numbers; whole data or bag) is extracted as a
value graph over (feature column, gradients, bag, configuration, previous rows) and compared with the reference that
clears every row, derives the bins from quantiles, sets exactly the bit of each example and accumulates ordered rows;
likewise what the learner reads back: number of bins, row of a bin, value of the test of a bin."""
from core import *
from props.learner import compare
import props.c16 as c16
A = [mk('arg', i) for i in range(6)]
OPQ = (r'^slice_store::(BitBlockStore|SliceStore)(::<.*>)?::\w+$', r'^slice_store::BitVec::<.*>::(enable_bit|set_bit|get_bit|set)$', r'^data::Data::\w+$', r'^simd::\w+$')
RULE = 'value-graph equality with reference'
def one(c, key, pat, name, args, sargs, what, public=False):
    f = c.fn(pat, public)
    r = c.run(f, args, opaque=OPQ)
    s = c.spec(name, sargs, opaque=OPQ)
    compare(c, key, r, s, f['name'], what, OPQ)
def check(c):
    D = r'^bitboost::dataset::'
    # a whole data set of n examples, and a bag given by its indices
    allx = mk('deref', A[3]); n = proj(allx, ('f', 0)); bag = proj(allx, ('f', 0))
    for kind, spec, m, what in (('update_locard_cat', 'locard', 4, 'bits of a low-cardinality feature'), ('update_hicard_cat', 'hicard', 6, 'bits of a high-cardinality feature'), ('update_num', 'num', 5, 'bits of a numeric feature')):
        for sub, ty, x in (('all', 'RangeIntoIter', n), ('bag', 'SliceIntoIter', bag)):
            args = A[:m]
            sargs = ([A[0]] + ([] if spec == 'locard' else [A[1]]) + [A[2], x] + A[4:m])
            c.guard('%s/%s' % (kind, sub), lambda: one(c, '%s/%s' % (kind, sub), D + r'InnerDataset::<[^>]*>::%s::<&bitboost::dataset::%s' % (kind, ty), '%s_%s' % (spec, sub), args, sargs, what))
    for fn, name, k, what in (('get_nbins', 'ds_nbins', 2, 'number of bins in use'), ('get_bitvec', 'ds_row', 3, 'row of a bin'), ('get_split_value', 'ds_test_value', 3, 'value of the test of a bin')):
        c.guard(fn, lambda: one(c, fn, D + r'Dataset::<[^>]*>::%s$' % fn, name, A[:k], A[:k], what, True))
    for key, pat, name, n, what in (('new', r'Dataset::<[^>]*>::new$', 'ds_new', 2, 'rows reserved per feature'), ('update', r'Dataset::<[^>]*>::update$', 'ds_update', 4, 'rebuilding of the rows at a refresh')):
        c.guard('dataset/' + key, lambda: c16.pair(c, 'dataset/' + key, D + pat, name, n, what))
