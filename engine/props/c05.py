"""The steps that hand examples to the objective and store leaf values (leaf, pair of leaves at the depth limit,
out-of-bag examples, the node loop that calls them, the partition that decides which examples reach a leaf)
are compared with the reference."""
from core import *
from props.learner import *
def check(c):
    whole(c, 'leaf', 'predict_leaf_value', 'node_leaf', 2)
    whole(c, 'leaves-at-limit', 'predict_child_leaf_values', 'child_leaves', 3)
    whole(c, 'out-of-bag', 'predict_out_of_bag_examples', 'out_of_bag', 1)
    whole(c, 'nodes', 'train', 'grow', 1)
    whole(c, 'partition', 'get_left_right_n2s', 'partition', 3)
