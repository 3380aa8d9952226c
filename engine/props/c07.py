"""The split search is compared with the reference: first maximum of the gain over all active features and bins,
admissible only with enough examples on both sides and more than the minimum gain; the node loop splits exactly then."""
from core import *
from props.learner import *
def check(c):
    whole(c, 'best-split', 'find_best_split', 'best_split', 2)
    whole(c, 'nodes', 'train', 'grow', 1)
