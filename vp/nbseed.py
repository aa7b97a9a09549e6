"""Seed numba's own generator (used by random coordinate selection)."""
import numba as nb
import numpy as np


@nb.njit
def _seed(s):
    np.random.seed(s)


def seed(s):
    _seed(s)
