from core import *
A = [mk('arg', i) for i in range(5)]
STORE = r'^slice_store::(BitBlockStore|HistStore|SliceStore)(::<.*>)?::\w+$'
PIECES = ('get_root_n2s', 'find_best_split', 'get_left_right_n2s', 'predict_leaf_value', 'predict_child_leaf_values', 'predict_out_of_bag_examples', 'build_histograms', 'compress_examples')
OUT = (STORE, r'^slice_store::BitVec(::<.*>)?::index_iter\w*$', r'^dataset::Dataset::(?!active_examples_iter$)\w+$', r'^slice_store::BitSlice::<.*>::\w+$', r'^slice_store::BitSliceLayout::\w+$', r'^slice_store::BitVec::<.*>::count_ones\w+$', r'^data::Data::\w+$', r'^objective::Objective::\w+$', r'^tree::tree::Tree::predict_single$')
RULE = 'value-graph equality with reference'
def piece(name): return r'^tree::learner::TreeLearner::%s$' % name
def learner_fn(c, name): return c.fn(r'^bitboost::tree::learner::TreeLearner(::<.*>)?::%s$' % name, False)
NOEV = r'(get_bitvec|get_hist|active_features|get_nbins|feat_type|get_split_value|example_sampling_enabled|map_index|Dataset::data|get_target|index_iter\w*|inactive_examples_iter|bounds|gradients|predictions|nactive_examples|map_index)$'

def states(r, args):
    """final content of every object reachable through the arguments or through pointers obtained from them"""
    out = {}
    for b, v in r['st'].items():
        if b[0] == 'O' and v is not mk('deref', b[1]): out[b[1]] = v
    return out

def scratch(c):
    """the reusable example buffer of the context carries no information between calls"""
    def f():
        p = proj(mk('deref', A[0]), ('f', c.fidx('tree::learner::TreeLearner', 'ctx')))
        return p, ('f', c.fidx('tree::learner::TreeLearnerContext', 'example_buffer'))
    try: return f()
    except Missing: return None
def forget(v, k):
    """v with component k erased"""
    if v.op == 'ite': return ite(v.args[0], forget(v.args[1], k), forget(v.args[2], k))
    return upd(v, k, I(0))

def compare(c, key, r, s, where, what, allow, ret=True, facts=None, skip=()):
    kw = dict(allow=allow, rule=RULE, facts=facts)
    if ret: c.same(key + '/result', r['ret'], s['ret'], where, what + ' (returned value)', **kw)
    a, b = states(r, None), states(s, None)
    sc = scratch(c)
    for p in sorted(set(a) | set(b), key=lambda t: t.key):
        x = a.get(p, mk('deref', p)); y = b.get(p, mk('deref', p))
        if p in skip: continue
        if sc and p is sc[0]: x = forget(x, sc[1]); y = forget(y, sc[1])
        n = re.sub(r'\W+', '.', show(p))[:60]
        c.same(key + '/state/' + n, x, y, where, what + ' (state)', **kw)
WHAT = {'get_root_n2s': 'statistics of the root', 'build_histograms': 'per-bin statistics', 'get_left_right_n2s': 'examples, statistics and numbers of the two children',
        'train': 'node processing', 'find_best_split': 'split choice', 'predict_leaf_value': 'value of a leaf', 'predict_child_leaf_values': 'values of leaves at the depth limit',
        'predict_out_of_bag_examples': 'out-of-bag predictions', 'compress_examples': 'compressed example set'}
def whole(c, key, name, spec, n, inline=(), ret=True):
    """one learner step against its reference; the other steps stay uninterpreted"""
    def go():
        for p in PIECES: learner_fn(c, p)
        f = learner_fn(c, name)
        op = OUT + tuple(piece(p) for p in PIECES if p != name and p not in inline)
        r = c.run(f, A[:n], opaque=op); s = c.spec(spec, A[:n], opaque=op)
        compare(c, key, r, s, f['name'], WHAT[name], op, ret=ret)
    c.guard(key, go)
