"""Unremarkable-looking grids on which index, ordering and lookup mistakes show."""

import numpy as np


def grids(x, log=False):
    """Variants of an ascending grid: orders, repetitions, neighbours, shared ends, single values."""
    x = np.asarray(x, float)
    n = x.size
    out = {'as given': x, 'reversed': x[::-1].copy(), 'rotated': np.roll(x, 1), 'swapped': np.concatenate([x[:2][::-1], x[2:]])}
    out['repeated'] = np.concatenate([x[:1], x[:-1]]) if n > 1 else np.repeat(x, 2)
    out['repeated at the end'] = np.concatenate([x, x[-1:]])
    eps = (1 + np.array([0, 1e-6, 1e-4, 3e-3])) if log else np.array([0, 1e-6, 1e-4, 3e-3])
    mid = x[n // 2]
    out['neighbours'] = mid * eps if log else mid + eps
    if n > 2:
        m = x.copy()
        m[1:-1] = np.sqrt(x[:-2] * x[1:-1]) if log else 0.5 * (x[:-2] + x[1:-1])
        out['same ends'] = m
    for e in (4e-3, 1e-5):  # almost, but not quite, the given one
        out[f'shifted by {e}'] = x * (1 + e) if log else x + e
    if n > 1:
        m = x.copy()
        m[-1] = m[-1] * 1.003 if log else m[-1] + 3e-3
        out['last one moved'] = m
    out['first only'], out['last only'] = x[:1].copy(), x[-1:].copy()
    return out
