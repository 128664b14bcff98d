"""Backtracking through an accumulated matrix."""
from .pathspec import *
from .registry import contract


class ComputePath(Contract):
    rounds = 5

    def __init__(self, qual):
        self.qual = qual

    def params(self, ex, variant):
        l1, l2 = sizes(ex, 'l1', 'l2')
        return dict(acc_cost_mat=sym_arr(ex, 'acc', (l1, l2), EXT))

    def requires(self, ex, v):
        a = v['acc_cost_mat']
        return [('non-empty', And(le(1, a.shape[0]), le(1, a.shape[1])))]

    def spec(self, ex, v):
        a = v['acc_cost_mat']
        return path_value(ex, a.shape[0], a.shape[1], ex.reader(a))

    def obligations(self, ex, res, v):
        a = v['acc_cost_mat']
        return valid_path_obls(ex, res, a.shape[0], a.shape[1], ex.reader(a))


for k in ('_njit_compute_path', '_compute_path'):
    contract(['P02'], ComputePath('tslearn.metrics.utils.' + k))
