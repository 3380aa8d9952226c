"""The compression step per discretisation width, the decision to compress and every consumer of the compressed form
(statistics, leaf values, child masks) are compared with the reference."""
from core import *
from props.learner import *
def check(c):
    whole(c, 'compress', 'compress_examples', 'compress_any', 4)
    whole(c, 'decision', 'get_left_right_n2s', 'partition', 3)
    whole(c, 'bins', 'build_histograms', 'statistics_any', 2)
    whole(c, 'leaf', 'predict_leaf_value', 'node_leaf', 2)
    whole(c, 'leaves-at-limit', 'predict_child_leaf_values', 'child_leaves', 3)
