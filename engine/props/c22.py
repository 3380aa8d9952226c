"""Prediction entry points (single example, one tree, whole ensemble; buffer and vector forms) are
extracted as value graphs and compared with the reference: walk from the root by the documented tests,
then shrinkage*(leaf+bias); every output cell depends on its own row only."""
from core import *
DATA = (r'^data::Data::get_feature$', r'^data::Data::nexamples$')
T = 'bitboost::tree::tree::'
RULE = 'value-graph equality with reference'
A = [mk('arg', i) for i in range(4)]
def check(c):
    def one(key, fn, spec, nargs, out):
        def go():
            f = c.fn('^' + T + fn + '$')
            r = c.run(f, A[:nargs], opaque=DATA); s = c.spec(spec, A[:nargs], opaque=DATA)
            n = length(mk('deref', A[2]))
            fa = {mk('ret', x): n for t_ in (r,) for x in find_all(t_['it'].read(t_['st'], (('O', A[2]), ())), lambda x: x.op == 'call' and x.args[0].endswith('nexamples'))} if out == 'buf' else {}
            if out == 'ret': c.same(key, r['ret'], s['ret'], f['name'], 'predicted value', allow=DATA, rule=RULE)
            else: c.same(key, r['it'].read(r['st'], (('O', A[2]), ())), s['it'].read(s['st'], (('O', A[2]), ())), f['name'], 'prediction buffer', allow=DATA, facts=fa, rule=RULE)
        c.guard(key, go)
    one('predict/tree-single', 'Tree::predict_single', 'tree_value', 3, 'ret')
    one('predict/tree-vector', 'Tree::predict', 'tree_predict', 2, 'ret')
    one('predict/tree-buffer', 'Tree::predict_buf', 'tree_predict_buf', 3, 'buf')
    one('predict/ensemble-vector', 'AdditiveTree::predict', 'ensemble_predict', 2, 'ret')
    one('predict/ensemble-buffer', 'AdditiveTree::predict_buf', 'ensemble_predict_buf', 3, 'buf')
