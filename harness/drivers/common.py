"""Projection of values of the code under test into plain JSON."""
from __future__ import annotations

import math
import random

import numpy as np


def ints(a):
    """Array-like of integers to nested lists (2-D arrays stay lists of lists, even when empty)."""
    a = np.asarray(a)
    if a.dtype == object:
        return [ints(x) if np.ndim(x) else int(x) for x in a]
    return np.array(a, dtype=np.int64).tolist()


def mat(a):
    """A matrix as a list of rows; also remembers the number of columns of an empty matrix."""
    a = np.asarray(a)
    assert a.ndim == 2, f"expected a matrix, got shape {a.shape}"
    return np.array(a, dtype=np.int64).tolist()


def known(x):
    """A distance that may be unknown."""
    return -9 if x is None else num(x)


def num(x):
    """A number that TLC can read: nan -> -1, inf -> -2, non-integers -> -3."""
    x = float(x)
    if math.isnan(x):
        return -1
    if math.isinf(x):
        return -2
    return int(x) if x == int(x) else -3


def exc_name(err: BaseException) -> str:
    return type(err).__name__


def seed_all(seed: int) -> None:
    random.seed(seed)
    np.random.seed(seed % (2**32))
