"""Arbitrary statistics of the cascade model."""
import numpy as rnp

from contracts.util import parameter
from pyvc.carr import CArr


def table(name, shape):
    a = rnp.empty(shape, dtype=object)
    for i in rnp.ndindex(shape):
        a[i] = parameter(name)
    return CArr(a, frozen=name)


def statistics(L, name, levels=5):
    """arbitrary cascade statistics"""
    c = L.load('melodist.cascade').CascadeStatistics()
    for k in ('p01', 'p10', 'pxx'):
        setattr(c, k, table(name + k, (2, 4)))
    c.wxx = table(name + 'wxx', (7, 2, 4))
    c.threshold = table(name + 'thr', (levels,))
    return c
