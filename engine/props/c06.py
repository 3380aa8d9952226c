"""Node loop, partition into children and the tree operations (numbering, depth limit, recording of splits)
are compared with the reference."""
from core import *
from props.learner import *
def check(c):
    whole(c, 'nodes', 'train', 'grow', 1)
    whole(c, 'partition', 'get_left_right_n2s', 'partition', 3)
    whole(c, 'leaves-at-limit', 'predict_child_leaf_values', 'child_leaves', 3)
    c.guard('tree', lambda: tree(c))
def tree(c):
    T = r'^bitboost::tree::tree::Tree::'
    f = c.fn(T + 'new$')
    r = c.run(f, A[:2]); s = c.spec('empty_tree', A[:2])
    c.same('tree/new', r['ret'], s['ret'], f['name'], 'a new tree is one leaf', rule=RULE)
    s = c.spec('shape', A[:2])['ret']
    for i, (n, k) in enumerate((('left_child', 2), ('right_child', 2), ('max_ninternal', 1), ('is_max_leaf_node', 2), ('max_nleafs', 1), ('max_nnodes', 1), ('nnodes', 1), ('nleafs', 1))):
        def one():
            f = c.fn(T + n + '$'); r = c.run(f, A[:k])
            c.same('tree/' + n, r['ret'], proj(s, ('f', i)), f['name'], n, rule=RULE)
        c.guard('tree/' + n, one)
    def value():
        f = c.fn(T + 'node_value$'); r = c.run(f, A[:2])
        c.same('tree/node_value', r['ret'], c.spec('tree_lookup', A[:2])['ret'], f['name'], 'node value', rule=RULE)
        f = c.fn(T + 'parent$'); r = c.run(f, A[:2])
        c.same('tree/parent', r['ret'], c.spec('tree_up', A[1:2])['ret'], f['name'], 'parent', rule=RULE)
    c.guard('tree/node_value', value)
    def learner():
        f = c.fn(r'^bitboost::tree::learner::TreeLearner(::<.*>)?::new$')
        r = c.run(f, A[:4], opaque=OUT); s = c.spec('new_learner', A[:4], opaque=OUT)
        c.same('tree/of-learner', c.fld(r['ret'], 'tree::learner::TreeLearner', 'tree'), s['ret'], f['name'], 'the learner starts from an empty tree of the configured depth', allow=OUT, rule=RULE)
    c.guard('tree/of-learner', learner)
