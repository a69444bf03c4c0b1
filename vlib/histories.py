"""Exhaustive exploration of update/read histories of a live model object.

A *state* is a configuration (base + the set of parameter assignments applied to it);
its specification is the observation of a model freshly constructed with exactly that
configuration, computed once per state in a pristine process.  A *transition* is one
real `update` of a live object (whose caches were filled by reading everything first).
After every transition everything a user can read is compared with the specification.
"""

import copy

from . import explore, observe as ob, space as sp

INVALID = 'invalid'


JOINT = '*'  # op name: several parameters in one update, the value is {parameter: value}


def kwargs(op):
    n, v = op
    return dict(v) if n == JOINT else {n: v}


def label(op):
    n, v = op
    if n == JOINT:
        return ' & '.join(label(x) for x in v.items())
    return f'{n}={ob_short(v)}'


def ob_short(v):
    import numpy as np

    if isinstance(v, np.ndarray):
        return f'array{v.shape}#{float(np.sum(v)):.6g}'
    if isinstance(v, dict):
        return '{' + ','.join(f'{k}:{ob_short(x)}' for k, x in v.items()) + '}'
    return repr(v)


class Space:
    """One base configuration with its alphabet of updates."""

    def __init__(self, name, build, base, ops, quantities=None, prepare=None):
        self.name = name
        self.build = build  # configuration -> live object
        self.base = base
        self.ops = ops
        self.quantities = quantities  # None: all public quantities
        self.oracle = {}

    # -- the specification -------------------------------------------------
    def config(self, path):
        c = self.base
        for i in path:
            for n, v in kwargs(self.ops[i]).items():
                c = sp.apply_update(c, n, v)
        return c

    @staticmethod
    def key(path):
        """States are sets of assignments: different parameters commute."""
        return tuple(sorted(path))

    def fresh(self, path):
        try:
            obj = self.build(copy.deepcopy(self.config(path)))
        except Exception as e:
            return (INVALID, f'{type(e).__name__}: {e}')
        return self.look(obj)

    def look(self, obj, leaf=ob.fleaf, names=None, reverse=False):
        names = names or self.quantities or ob.public_quantities(obj)
        names = list(names)
        if reverse:
            names = names[::-1]
        return ob.observe(obj, names, leaf)

    def compute_oracles(self, paths, progress=None):
        todo = sorted({self.key(p) for p in paths} - set(self.oracle))
        res = explore.pmap(self.fresh, todo, chunk=4, progress=progress)
        self.oracle.update(zip(todo, res))
        return len(todo)

    # -- transitions on the live object --------------------------------------
    def transition(self, obj, kw, want):
        """update(**kw); returns None if as specified, else a description."""
        try:
            obj.update(**copy.deepcopy(kw))
        except Exception as e:
            if isinstance(want, tuple):
                return None
            return f'update raised {type(e).__name__}: {e}'
        if isinstance(want, tuple):
            return f'update accepted what construction rejects ({want[1]})'
        return ''

    def compare(self, obj, want, reverse=False):
        got = self.look(obj, reverse=reverse)
        d = ob.diff(got, want)
        if d:
            return 'differs from a fresh model: ' + ', '.join(sorted(d)[:12])
        return None


def revertible(space, i):
    """Can the assignment i be undone by one update?  (dict updates merge)"""
    return all(n in space.base and not isinstance(v, dict) and not isinstance(space.base[n], dict) for n, v in kwargs(space.ops[i]).items())


def explore_from(space, i, seconds, revert=True, reverse=False):
    """All histories  base -> i -> j [-> undo i]  for j in `seconds`, reading all in between."""
    out = []
    n = dict(steps=0, traces=0)
    obj = space.build(copy.deepcopy(space.base))
    space.look(obj, leaf=lambda v: ('x',))

    def visit(path, kw, want, hist):
        n['steps'] += 1
        r = space.transition(obj, kw, want)
        if r is None:
            return False
        if r == '':
            r = space.compare(obj, want, reverse)
        if r:
            out.append((hist, r))
        return True

    h1 = [label(space.ops[i])]
    ni, vi = space.ops[i]
    if not visit((i,), kwargs(space.ops[i]), space.oracle[(i,)], h1):
        return out, n
    n['traces'] += 1
    undo = {p: space.base[p] for p in kwargs(space.ops[i])} if revert and revertible(space, i) else None
    if undo is not None:

        def back():
            visit((), undo, space.oracle[()], h1 + [f'undo {ni}'])
            n['traces'] += 1
            return out, n

        o, m = explore.branch(back)
        out[:], n_new = o, m
        n.update(n_new)

    for j in seconds:
        nj, vj = space.ops[j]
        if nj == ni:
            continue

        def cont():
            out.clear()
            n.update(steps=0, traces=0)
            h2 = h1 + [label(space.ops[j])]
            if visit((i, j), {nj: vj}, space.oracle[space.key((i, j))], h2):
                if undo is not None:
                    visit((j,), undo, space.oracle[(j,)], h2 + [f'undo {ni}'])
            n['traces'] += 1
            return list(out), dict(n)

        o, m = explore.branch(cont)
        out += o
        n['steps'] += m['steps']
        n['traces'] += m['traces']
    return out, n


def explore_reads(space, q, seconds):
    """All histories  base -> read only q -> j  ->  read everything."""
    out, n = [], dict(steps=0, traces=0)
    obj = space.build(copy.deepcopy(space.base))
    qs = [q] if isinstance(q, str) else list(q)
    space.look(obj, leaf=lambda v: ('x',), names=qs)
    for j in seconds:

        def cont():
            nj, vj = space.ops[j]
            want = space.oracle[(j,)]
            r = space.transition(obj, {nj: vj}, want)
            if r == '':
                # what was read before the update is read first after it
                first = ob.diff(space.look(obj, names=qs), {k: v for k, v in want.items() if k.split('.')[0].split('[')[0] in qs})
                r = ('differs from a fresh model: ' + ', '.join(first)) if first else space.compare(obj, want)
            return r

        r = explore.branch(cont)
        n['steps'] += 1
        n['traces'] += 1
        if r:
            out.append(([f'read {q}', label(space.ops[j])], r))
    return out, n


def explore_lazy(space, i, seconds, how):
    """base -> read all -> {i, j at once | i then j unread} -> read everything."""
    out, n = [], dict(steps=0, traces=0)
    obj = space.build(copy.deepcopy(space.base))
    space.look(obj, leaf=lambda v: ('x',))
    ni, vi = space.ops[i]
    for j in seconds:
        nj, vj = space.ops[j]
        if nj == ni:
            continue
        want = space.oracle[space.key((i, j))]

        def cont():
            if how == 'joint':
                r = space.transition(obj, {ni: vi, nj: vj}, want)
            else:
                r = space.transition(obj, {ni: vi}, space.oracle[(i,)])
                if r == '':
                    r = space.transition(obj, {nj: vj}, want)
            if r == '':
                r = space.compare(obj, want, reverse=True)
            return r

        r = explore.branch(cont)
        n['steps'] += 1
        n['traces'] += 1
        if r:
            out.append(([how, label(space.ops[i]), label(space.ops[j])], r))
    return out, n


# ------------------------------------------------------- updates that are easy to miss
def near(v):
    """Values of the same kind, shape and gross summary as v, but not equal to it."""
    import numpy as np

    if isinstance(v, bool) or v is None or isinstance(v, (str, type)):
        return
    if isinstance(v, (float, np.floating)):
        yield v * (1 + 1e-5) if v else 1e-5
        return
    if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.size:
        for pos in sorted({0, v.size // 2, v.size - 1}):
            w = v.copy()
            w.flat[pos] *= 1.01 if w.flat[pos] else 1.0
            if not np.array_equal(w, v):
                yield w
        if v.ndim > 1 and v.shape[-2] > 1:
            w = np.roll(v, 1, axis=-2)  # the same numbers, sums and ranges
            if not np.array_equal(w, v):
                yield w


def inconspicuous(base):
    """Single-parameter updates that a careless comparison would take for no change."""
    out = []
    for n, v in base.items():
        if isinstance(v, dict):
            for k, x in v.items():
                out += [(n, {k: y}) for y in near(x)]
        else:
            out += [(n, y) for y in near(v)]
    return out
