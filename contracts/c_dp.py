"""Min-plus dynamic programs of DTW and Frechet (compiled kernels and vectorised anti-diagonal versions)."""
from .dpspec import *
from .registry import contract


class TorchAcc(AccMatrix):
    def __init__(self, kind):
        self.kind = kind
        self.qual = f'tslearn.metrics._{kind}._accumulated_matrix'


class TorchAccD(AccMatrixD):
    modifies = ('D',)

    def __init__(self, kind):
        self.kind = kind
        self.qual = f'tslearn.metrics._{kind}._acc_matrix_from_dist_matrix'


for k, ps in (('dtw', ['P01', 'P02', 'P05', 'P09']), ('frechet', ['P04', 'P02', 'P05'])):
    contract(ps, AccMatrix(k))
    contract(ps, AccMatrixD(k))
    contract(ps + ['P17'], TorchAcc(k))
    contract(ps + ['P17'], TorchAccD(k))
