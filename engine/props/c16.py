"""Creating a data set, each refresh of it and every enumeration of in-bag and out-of-bag examples are extracted as value
graphs over (configuration, data, previous state) and compared with the reference: selection by swapping to the front and
sorting that prefix, when a refresh is due, what is refreshed for which examples, the complement of the sorted bag."""
from core import *
from props.learner import compare
A = [mk('arg', i) for i in range(6)]
OPQ = (r'^dataset::InnerDataset::update_\w+$', r'^slice_store::(BitBlockStore|SliceStore)(::<.*>)?::\w+$', r'^data::Data::\w+$', r'^rand::\w*(::\w+)*$')
RULE = 'value-graph equality with reference'
def pair(c, key, pat, name, n, what, public=True):
    f = c.fn(pat, public)
    r = c.run(f, A[:n], opaque=OPQ)
    s = c.spec(name, A[:n], opaque=OPQ)
    compare(c, key, r, s, f['name'], what, OPQ)
def check(c):
    D = r'^bitboost::dataset::Dataset::<[^>]*>::'
    for key, pat, name, n, what in (
        ('new', D + 'new$', 'ds_new', 2, 'the data set before the first refresh'),
        ('update', D + 'update$', 'ds_update', 4, 'one refresh'),
        ('active_features', D + 'active_features$', 'ds_active_features', 1, 'the drawn features'),
        ('map_index', D + 'map_index$', 'ds_map_index', 2, 'example at a position of the bag'),
        ('inactive_examples_iter', D + 'inactive_examples_iter$', 'ds_outside', 1, 'enumeration of the examples outside the bag'),
        ('inactive_examples_iter/next', r'^<bitboost::dataset::InactiveExampleIter<[^>]*> as std::iter::Iterator>::next$', 'ds_outside_next', 1, 'next example outside the bag')):
        c.guard(key, lambda: pair(c, key, pat, name, n, what, 'next' not in key))
    c.guard('draw', lambda: pair(c, 'draw', r'^bitboost::dataset::shuffle_first_k$', 'draw', 3, 'selection without replacement', False))
