"""C03: reading is pure - no read changes what any other read returns, the parameters or the inputs."""

import copy
import itertools

from vlib import explore, fakeemu, observe as ob, space as sp

from . import c02

TOP = ['power_spectrum_mm', 'power_spectrum_gg', 'power_spectrum_gm', 'power_spectrum_mi', 'power_spectrum_ii',
       'power_spectrum_gi', 'power_spectrum_lin', 'obs_func', 'hod', 'alignment_class']  # fmt: skip


class Subject:
    """Something with readings: names, and how to build and to read it."""

    def __init__(self, name, build, base, top=None, depth=2):
        self.name, self.build, self.base, self.top, self.depth = name, build, base, top, depth

    def make(self):
        given = copy.deepcopy(self.base)
        obj = self.build(given)
        return obj, given

    def names(self, obj):
        return ob.public_quantities(obj)

    def read(self, obj, q):
        return dict(ob.observe_one(obj, q, ob.fleaf))

    def pars(self, obj):
        return copy.deepcopy(obj.parameter_values) if hasattr(obj, 'parameter_values') else {}


class Upsampled(Subject):
    """Readings are calls of results(), alone or for several spectra at once."""

    def names(self, obj):
        return [(m,) for m in c02.MODES] + [('mm', 'gg'), ('ii', 'mi'), tuple(c02.MODES)]

    def read(self, obj, q):
        out = {}
        obj.results(list(q), ['tot', '1h', '2h'])
        for m in q:
            out.update(ob.expand(m, getattr(obj, f'power_spectrum_{m}'), ob.fleaf))
        return out

    def pars(self, obj):
        return {n: copy.deepcopy(v) for n, v in super().pars(obj).items() if n != 'model'}


def equal(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if hasattr(a, 'dtype') or hasattr(b, 'dtype'):
        return ob.values_equal(a, b, 0.0)
    if type(a).__module__.startswith(('onepower', 'astropy', 'hmf', 'halomod')):
        return type(a) is type(b)
    return a == b


def subjects(thorough):
    from onepower import Spectra

    def build(cfg):
        return Spectra(**cfg)

    more = {
        'zheng': dict(hod_model='Zheng', hod_settings=sp.settings(0), hod_params={'sigma': 0.3}, poisson_model='power_law',
                      poisson_params={'poisson': 1.0, 'pivot': 13.0, 'slope': 0.2}),
        'bins': dict(hod_settings=sp.settings(0, 3), align_params={}, hod_params={'A_cen': 0.2, 'A_sat': -0.1}, compute_observable=True),
        'respbins': dict(hod_settings=sp.settings(0, 2), hod_settings_mm=sp.settings(0, 2), response=True, matter_power_nl=sp.pnl(), hmcode_ingredients='fit'),
        'user': dict(mdef_model='SOMean', overdensity=300.0, matter_power_lin=sp.plin(), dewiggle=True),
    }  # fmt: skip
    for name, kw in list(sp.BASES.items()) + list(more.items()):
        yield Subject(f'spectra-{name}', build, sp.spectra_base(**kw), TOP if name in sp.BASES or thorough else None)
    seen = set()
    for s in list(c02.bias_spaces()) + list(c02.align_spaces(thorough)) + list(c02.ingredient_spaces()):
        yield Subject(s.name, s.build, s.base)
    for s in c02.upsampled_spaces():
        yield Upsampled(s.name, s.build, s.base, 'all')


def play(subj, order, alone):
    """Read in this order on a fresh object; compare each reading with the reading done alone."""
    obj, given = subj.make()
    before = subj.pars(obj)
    for pos, q in enumerate(order):
        for rep in range(2 if pos == 0 else 1):
            got = subj.read(obj, q)
            d = ob.diff(got, alone[q])
            if d:
                return pos, f'{d[0]} differs when read {"again" if rep else "after " + str(order[:pos])[:120]}'
    after = subj.pars(obj)
    for n in before:
        if not equal(after.get(n), before[n]):
            return len(order), f'reading changed the parameter {n}'
    for n, v in subj.base.items():
        if not equal(given.get(n), v):
            return len(order), f'reading changed the {n} that the caller passed in'
    return None


def run(r):
    fakeemu.install()
    thorough = r.tier == 'thorough'
    for subj in subjects(thorough):
        names = explore.pmap(lambda _: list(subj.names(subj.make()[0])), [0])[0]

        def single(q):
            return subj.read(subj.make()[0], q)

        alone = dict(zip(names, explore.pmap(single, names, chunk=2)))
        orders = []
        for i, q in enumerate(names):
            rest = names[:i] + names[i + 1:]
            orders += [[q] + rest, [q] + rest[::-1]]
            if thorough:
                orders += [names[i:] + names[:i], (names[i:] + names[:i])[::-1]]
        top = names if subj.top == 'all' else [t for t in subj.top or [] if t in names]
        depth = 4 if thorough and subj.top != 'all' else 3 if subj.top == 'all' or thorough else 2
        orders += [list(p) for p in itertools.permutations(top, depth)] if top else []
        if not top and thorough:
            orders += [list(p) for p in itertools.permutations(names, 2)]
        res = explore.pmap(lambda o: play(subj, o, alone), orders, chunk=4, progress=subj.name)
        for o, bad in zip(orders, res):
            for d in range(1, len(o) + 1):
                r.state((subj.name, frozenset(o[:d])) if d <= 3 else (subj.name, tuple(o[:2]), d))
            r.step(len(o))
            r.trace()
            if bad:
                pos, what = bad
                r.violation(f'{subj.name}|{o[: pos + 1]}'[:200], f'{subj.name}: {what}', [str(x) for x in o[: pos + 1]][-6:])
        r.sample({'object': subj.name, 'order': [str(x) for x in orders[-1][:5]]}, limit=16)
        r.say(f'{subj.name}: {len(names)} readings, {len(orders)} orders')
    r.assumptions += ['the specification of a reading is its value as the very first read of a fresh object']
    return r.finish()
