"""Exhaustive walks over finite configuration lattices of live models, against a reference.

The slow axes start a fresh model in its own process; the fast axes are walked on that
live model by `update`, one lattice point after the other in reflected (Gray) order, so
that neighbouring points differ in as few options as possible.
"""

import copy
import traceback

import numpy as np

from . import explore, space as sp


def reflected(axes):
    """All index tuples of the product, consecutive ones differing in one axis."""
    if not axes:
        yield ()
        return
    rest = list(reflected(axes[1:]))
    for i in range(len(axes[0])):
        for r in rest if i % 2 == 0 else rest[::-1]:
            yield (i,) + r


def points(axes):
    """axes: list of (name, values).  Yields dicts in reflected order."""
    for idx in reflected([v for _, v in axes]):
        yield {n: v[i] for (n, v), i in zip(axes, idx)}


def show(point):
    from .histories import ob_short

    return {n: ob_short(v) for n, v in point.items()}


def close(got, want, rtol=1e-7, atol=1e-11):
    """None if equal to rounding, else a description of the worst deviation."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return f'shape {got.shape} instead of {want.shape}'
    if got.size == 0:
        return None
    fg, fw = np.isfinite(got), np.isfinite(want)
    if not np.array_equal(fg, fw):
        i = tuple(int(x) for x in np.argwhere(fg != fw)[0])
        return f'at {i}: {got[i]} instead of {want[i]}'
    g, w = np.where(fw, got, 0.0), np.where(fw, want, 0.0)
    scale = np.max(np.abs(w), axis=-1, keepdims=True) if w.ndim else np.abs(w)
    bad = np.abs(g - w) > rtol * np.abs(w) + atol * scale
    if bad.any():
        d = np.where(bad, np.abs(g - w) / (np.abs(w) + 1e-300), 0)
        i = np.unravel_index(int(np.argmax(d)), d.shape)
        return f'at {tuple(int(x) for x in i)}: {g[i]:.10g} instead of {w[i]:.10g} ({int(bad.sum())} of {bad.size} differ)'
    return None


def walk(build, base, slow, fast, valid, visit, progress=None):
    """Visit every valid point.  visit(model, config, memory) -> list of (what, detail)."""
    groups = [p for p in points(slow)]
    fast = list(fast)

    def work(group):
        out, n, seen = [], 0, []
        model, cur, mem = None, None, {}
        for pt in points(fast):
            full = {**group, **pt}
            if not valid(full):
                continue
            # a slow axis called '_...' holds a bundle of parameters
            cfg = copy.deepcopy(base)
            for k, v in full.items():
                cfg.update(copy.deepcopy(v) if k.startswith('_') else {k: copy.deepcopy(v)})
            n += 1
            seen.append(repr(sorted(show(full).items())))
            try:
                if model is None:
                    model = build(copy.deepcopy(cfg))
                else:
                    ch = {k: copy.deepcopy(v) for k, v in cfg.items() if not sp.same(v, cur[k])}
                    if ch:
                        model.update(**ch)
                cur = cfg
            except Exception as e:
                out.append((show(full), f'rejected: {type(e).__name__}: {e}'))
                model = None
                continue
            try:
                for what in visit(model, cfg, mem):
                    out.append((show(full), what))
            except Exception as e:
                where = traceback.format_exc().strip().splitlines()[-3:]
                out.append((show(full), f'raises: {type(e).__name__}: {e} {where}'))
        return out, n, seen

    return list(zip(groups, explore.pmap(work, groups, progress=progress)))


def decide(r, name, build, base, slow, fast, visit, valid=lambda p: True):
    total = 0
    for group, (out, n, seen) in walk(build, base, slow, fast, valid, visit, progress=name):
        total += n
        r.step(n)
        r.trace(n)
        for s in seen:
            r.state((name, s))
        for pt, what in out:
            r.violation(f'{name}|{sorted(pt.items())}|{what.split(":")[0]}', what, [name, pt])
        if n:
            r.sample({'lattice': name, 'group': show(group)})
    r.say(f'{name}: {total} configurations')
    return total
