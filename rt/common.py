import math
import numpy as np
from . import oracles as O
from .core import case, Fail, Skip, T, tonp, describe

try:
    import torch
except ImportError:
    torch = None


def constraint(t, n, m, tight=True):
    """random combination of constraint arguments"""
    k = t.integers(0, 9)
    if k <= 2:
        return {}
    if k == 3:
        return dict(global_constraint='sakoe_chiba')
    if k == 4:
        return dict(global_constraint='sakoe_chiba', sakoe_chiba_radius=t.integers(0, max(n, m)))
    if k == 5:
        return dict(sakoe_chiba_radius=t.integers(0, max(n, m)))
    if k == 6:
        return dict(global_constraint='itakura')
    if k == 7:
        return dict(global_constraint='itakura', itakura_max_slope=t.choice([1., 1.2, 1.5, 2., 2.5, 3., 4., 7.3]))
    if k == 8:
        return dict(itakura_max_slope=t.choice([1., 1.3, 1.5, 2., 3., 5.]))
    return dict(global_constraint=t.choice(['sakoe_chiba', 'itakura']), sakoe_chiba_radius=t.integers(0, 4),
                itakura_max_slope=t.choice([1.5, 2., 3.]))


def omask(n, m, c):
    return O.mask_for(n, m, c.get('global_constraint'), c.get('sakoe_chiba_radius'), c.get('itakura_max_slope'))


def to_backend(t, x, be):
    if be == 'torch':
        return torch.tensor(np.asarray(x, dtype=float))
    return x


def backends(t):
    return t.choice(['numpy', 'numpy', 'torch'])


def path_cost(D, p):
    return sum(D[i][j] for i, j in p)


def feas(mask):
    D = [[0.] * len(mask[0]) for _ in mask]
    return O.acc(D, mask)[-1][-1] < math.inf
