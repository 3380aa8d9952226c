"""Node totals at the root, per-bin statistics (plain and compressed) and derivation of the right sibling are
extracted per discretisation width and compared with the reference (opaque: storage access, masked sums, counts)."""
from core import *
from props.learner import *
def check(c):
    whole(c, 'root', 'get_root_n2s', 'root_any', 1, inline=('build_histograms',))
    whole(c, 'bins', 'build_histograms', 'statistics_any', 2)
    whole(c, 'children', 'get_left_right_n2s', 'partition', 3)
